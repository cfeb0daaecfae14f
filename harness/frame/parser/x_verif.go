package parser

import (
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/state"
)

func (p *Parser) VObus() []obu.Obu     { return p.obus }
func (p *Parser) VState() *state.State { return p.state }
func (p *Parser) VRun()                { p.bitstream() }
