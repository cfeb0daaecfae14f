"""Which models and recordings decide which property."""


def fh(aspect):
    return {"conform": [{"driver": "framehdr", "trace": "TraceFrameHeader", "cfg": f"TraceFrameHeader_{aspect}.cfg",
                         "n": 6000, "thorough_n": 15000}]}


def stream(aspect):
    c = {"driver": "stream", "trace": "TraceStream", "cfg": f"TraceStream_{aspect}.cfg"}
    return {"conform": [{**c, "n": 0, "gen": {"module": "MCStream", "cfg": "MCStream.cfg", "thorough_cfg": "MCStreamBig.cfg", "workers": 8}},
                        {**c, "n": 1500, "thorough_n": 3000}]}


def tile(aspect):
    return {"design": [{"module": "MCTile", "cfg": f"MCTile_{aspect}.cfg", "thorough_cfg": f"MCTile_{aspect}Big.cfg"}],
            "conform": [{"driver": "tile", "trace": "TraceTile", "cfg": f"TraceTile_{aspect}.cfg", "n": 900, "thorough_n": 1500}]}


# used when a driver does not build against the tree: complete streams through the unmodified decoder
FALLBACK = {"driver": "frame", "trace": "TraceFrame", "n": 240, "thorough_n": 900}


CHECKS = {
    "C01": {
        "design": [{"module": "MCBitReader", "cfg": "MCBitReader.cfg", "thorough_cfg": "MCBitReaderBig.cfg"}],
        "conform": [{"driver": "bits", "trace": "TraceBitReader", "n": 20000, "thorough_n": 60000}],
    },
    "C02": stream("framing"),
    "C03": {
        "conform": [{"driver": "seqhdr", "trace": "TraceSeqHeader", "n": 10000, "thorough_n": 30000}],
    },
    "C05": {
        "design": [{"module": "MCTileInfo", "cfg": "MCTileInfo.cfg", "thorough_cfg": "MCTileInfoBig.cfg"}],
        "conform": [{"driver": "tileinfo", "trace": "TraceTileInfo", "n": 9000, "thorough_n": 30000}],
    },
    "C06": fh("basics"),
    "C07": fh("quant"),
    "C08": fh("filter"),
    "C09": fh("motion"),
    "C10": fh("grain"),
    "C11": fh("refs"),
    "C12": {
        "design": [{"module": "MCSymbol", "cfg": "MCSymbol.cfg", "thorough_cfg": "MCSymbolBig.cfg"}],
        "conform": [{"driver": "symdec", "trace": "TraceSymbol", "cfg": "TraceSymbol_decode.cfg", "n": 10000, "thorough_n": 20000}],
    },
    "C13": {
        "conform": [{"driver": "cdftab", "trace": "TraceCdfTab", "n": 1000, "thorough_n": 1000, "once": True},
                    {"driver": "symdec", "trace": "TraceSymbol", "cfg": "TraceSymbol_adapt.cfg", "n": 10000, "thorough_n": 20000}],
    },
    "C14": {
        "design": [{"module": "MCCdfContexts", "cfg": "MCCdfContexts.cfg", "thorough_cfg": "MCCdfContextsBig.cfg"}],
        "conform": [{"driver": "cdfctx", "trace": "TraceCdfContexts", "n": 1000, "thorough_n": 3000}],
    },
    "C15": stream("headers"),
    "C16": stream("tiles"),
    "C17": {
        "design": [{"module": "MCArith", "cfg": "MCArith.cfg", "thorough_cfg": "MCArithBig.cfg"}],
        "conform": [{"driver": "util", "trace": "TraceArith", "n": 5000, "thorough_n": 15000}],
    },
    "C18": tile("layout"),
    "C19": tile("modes"),
    "C20": tile("filters"),
    "C21": {**tile("coeffs"),
            "conform": [{"driver": "scans", "trace": "TraceScans", "n": 304, "thorough_n": 304, "once": True}] + tile("coeffs")["conform"]},
    "C22": {
        "design": [{"module": "MCTransform", "cfg": "MCTransform.cfg", "thorough_cfg": "MCTransformBig.cfg"}],
        "conform": [{"driver": "quantab", "trace": "TraceQuantTab", "n": 1623, "thorough_n": 1623, "once": True},
                    {"driver": "recon", "trace": "TraceRecon", "n": 1200, "thorough_n": 4000}],
    },
    "C23": {
        "design": [{"module": "MCIntra", "cfg": "MCIntra.cfg", "thorough_cfg": "MCIntraBig.cfg"}],
        "conform": [{"driver": "intra", "trace": "TraceIntra", "n": 10000, "thorough_n": 30000}],
    },
    "C24": {
        "design": [{"module": "MCChroma", "cfg": "MCChroma.cfg", "thorough_cfg": "MCChromaBig.cfg"}],
        "conform": [{"driver": "chroma", "trace": "TraceChroma", "n": 4000, "thorough_n": 15000}],
    },
    "C25": {
        "design": [{"module": "MCDeblock", "cfg": "MCDeblock.cfg", "thorough_cfg": "MCDeblockBig.cfg"}],
        "conform": [{"driver": "deblock", "trace": "TraceDeblock", "n": 1300, "thorough_n": 5000}],
    },
    "C26": {
        "design": [{"module": "MCCdef", "cfg": "MCCdef.cfg", "thorough_cfg": "MCCdefBig.cfg"}],
        "conform": [{"driver": "cdef", "trace": "TraceCdef", "n": 1300, "thorough_n": 5000}],
    },
    "C27": {
        "design": [{"module": "MCRestore", "cfg": "MCRestore.cfg", "thorough_cfg": "MCRestoreBig.cfg"}],
        "conform": [{"driver": "restore", "trace": "TraceRestore", "n": 1300, "thorough_n": 4000}],
    },
    "C29": {"conform": [{"driver": "frame", "trace": "TraceFrame", "n": 240, "thorough_n": 900}]},
    "C28": {
        "design": [{"module": "MCFinish", "cfg": "MCFinish.cfg", "thorough_cfg": "MCFinishBig.cfg"}],
        "conform": [{"driver": "finish", "trace": "TraceFinish", "n": 320, "thorough_n": 1200}],
    },
}
