"""What decides each property: the configurations TLC checks and the runs it validates."""


def core(spec, what, mc=None, thorough=None, opts=(), trace=None, seeds=24, assumptions=(), cfg=None, harness="core",
         quick=2):
    mc = mc or [(spec, spec)]
    return {
        "harness": harness,
        "mc": {"quick": mc, "thorough": thorough or mc},
        "parts": [{"what": what, "opts": list(opts), "trace": trace or spec,
                   "cfg": cfg or trace or spec}],
        "seeds": {"quick": quick, "thorough": seeds},
        "assumptions": list(assumptions),
    }


def full(*args, **kw):
    kw["assumptions"] = tuple(kw.get("assumptions", ())) + SHIMS
    return core(*args, harness="full", **kw)


def prog(*args, **kw):
    kw["assumptions"] = tuple(kw.get("assumptions", ())) + SHIMS
    return core(*args, harness="prog", **kw)


SHIMS = ("the whole crate is compiled against stand-ins for bevy_ecs/bevy_app, hdf5, diman and vergen (/verif/shims), "
         "with which the repository's own tests pass",)
MPI = ("messages are carried by a stand-in for the MPI library (/verif/fakempi) that lets ranks run in "
       "every order allowed by the MPI standard, chosen by a seeded scheduler",)

PLAN = {
    "C01": core("Exchange", "exchange", [("Exchange", "Exchange"), ("Exchange", "ExchangeTwo")],
                [("Exchange", "ExchangeLive"), ("Exchange", "ExchangeTwo"), ("Exchange", "ExchangeThorough")],
                assumptions=MPI),
    "C02": core("PointToPoint", "p2p", thorough=[("PointToPoint", "PointToPointThorough")], assumptions=MPI),
    "C03": core("Collectives", "collectives", thorough=[("Collectives", "CollectivesThorough")], assumptions=MPI),
    "C04": core("Chunks", "chunks", thorough=[("Chunks", "ChunksThorough")], assumptions=MPI),
    "C05": core("DataByRank", "databyrank", [("DataByRankMC", "DataByRankMC")],
                [("DataByRankMC", "DataByRankThorough")]),
    "C06": core("FileDistribution", "filedist", thorough=[("FileDistribution", "FileDistributionThorough")]),
    "C07": core("FileDistribution", "filedist", thorough=[("FileDistribution", "FileDistributionThorough")],
                opts=["output=1"]),
    "C08": core("Hilbert", "hilbert", thorough=[("Hilbert", "HilbertThorough")], seeds=16),
    "C10": core("Extent", "extent", thorough=[("Extent", "ExtentThorough")]),
    "C11": core("Shipping", "datatypes", thorough=[("Shipping", "ShippingThorough")], assumptions=MPI),
    "C12": core("CountByDir", "countbydir", thorough=[("CountByDir", "CountByDirThorough")]),
    "C13": core("Directions", "directions"),
    "C14": core("Determinant", "det", [("DeterminantMC", "DeterminantMC")],
                [("DeterminantMC", "DeterminantThorough")], seeds=12),
    "C15": core("LinearAlgebra", "solve", [("LinearAlgebraMC", "LinearAlgebraMC")],
                [("LinearAlgebraMC", "LinearAlgebraThorough")], seeds=12),
    "C16": core("Arena", "arena", thorough=[("Arena", "ArenaThorough")]),
    "C17": core("NodeIndex", "nodeindex", thorough=[("NodeIndex", "NodeIndexThorough")]),
    "S01": full("Sweep", "sweep", [("Sweep", "SweepLive"), ("Sweep", "SweepTwo")],
                [("Sweep", "Sweep"), ("Sweep", "SweepLive"), ("Sweep", "SweepTwo"), ("Sweep", "SweepDirs"),
                 ("Sweep", "SweepThorough")], cfg="SweepOrder", assumptions=MPI),
    "S02": full("Sweep", "sweep", [("Sweep", "SweepTwo")],
                [("Sweep", "Sweep"), ("Sweep", "SweepTwo"), ("Sweep", "SweepLevels")], cfg="SweepRates", assumptions=MPI),
    "S03": full("Sweep", "sweep", [("ScheduleMC", "ScheduleMC"), ("Sweep", "SweepLevels")],
                [("ScheduleMC", "ScheduleThorough"), ("Sweep", "SweepLevels")], cfg="SweepLevels", assumptions=MPI),
    "S04": full("BatchSend", "sweepcomm", [("BatchSend", "BatchSend"), ("BatchSend", "BatchSendEager")],
                [("BatchSend", "BatchSend"), ("BatchSend", "BatchSendEager"), ("BatchSend", "BatchSendThree")],
                assumptions=MPI),
    "S05": full("Rotation", "rotation", thorough=[("Rotation", "Rotation"), ("Rotation", "RotationThorough")], assumptions=MPI),
    "D01": full("Domain", "domain", [("Domain", "Domain"), ("Domain", "DomainThree")],
                [("Domain", "Domain"), ("Domain", "DomainThree"), ("Domain", "DomainThorough")],
                cfg="DomainParticles", assumptions=MPI),
    "D02": full("Domain", "domain", [("Domain", "DomainBalanced"), ("Domain", "DomainThree")],
                [("Domain", "DomainBalanced"), ("Domain", "DomainThree"), ("Domain", "DomainThorough")],
                cfg="DomainOwners", assumptions=MPI),
    "D03": full("Domain", "domain", [("Domain", "Domain")], cfg="DomainNeighbourhood", assumptions=MPI),
    "T01": full("Tree", "tree", [("Tree", "TreeQuick"), ("Tree", "TreeOneQuick")],
                [("Tree", "Tree"), ("Tree", "TreeOne"), ("Tree", "TreeThree")]),
    "T02": full("Tree", "tree", [("Tree", "TreeOneQuick")], [("Tree", "TreeOne")], cfg="TreeBox"),
    "V01": full("Delaunay", "delaunay", thorough=[("Delaunay", "Delaunay"), ("Delaunay", "DelaunayThorough")]),
    "V02": full("Grid", "grid", [("HaloSearch", "HaloSearchQuick")],
                [("HaloSearch", "HaloSearch"), ("HaloSearch", "HaloSearchRefuse")], cfg="GridGeometry", quick=8, assumptions=MPI),
    "V03": full("Grid", "grid", [("HaloSearch", "HaloSearchQuick")],
                [("HaloSearch", "HaloSearch"), ("HaloSearch", "HaloSearchRefuse")], cfg="GridNeighbours", quick=8, assumptions=MPI),
    "P01": full("Parameters", "parameters", thorough=[("Parameters", "ParametersThorough")]),
    "O01": full("Output", "output", [("Output", "Output"), ("Output", "OutputLive"), ("Output", "OutputEvery")],
                [("Output", "OutputThorough"), ("Output", "OutputLive"), ("Output", "OutputEvery")], quick=4, assumptions=MPI),
    "O03": full("Series", "series", thorough=[("Series", "Series"), ("Series", "SeriesThorough")], assumptions=MPI),
    "H01": full("Chemistry", "chemistry", thorough=[("Chemistry", "Chemistry"), ("Chemistry", "ChemistryThorough")]),
    "O02": prog("Reader", "reader", thorough=[("Reader", "Reader"), ("Reader", "ReaderThorough")], assumptions=MPI),
    "R01": prog("Sources", "sources", thorough=[("Sources", "SourcesThorough")], assumptions=MPI),
    "M01": prog("Remap", "remap", thorough=[("Remap", "RemapThorough")], assumptions=MPI),
    "E01": prog("Program", "whole", thorough=[("Program", "Program"), ("Program", "ProgramThorough")], assumptions=MPI),
    "G01": prog("GridRead", "readgrid", thorough=[("GridRead", "GridRead"), ("GridRead", "GridReadThorough")], assumptions=MPI),
}
