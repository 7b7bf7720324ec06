"""The image functions of the standard build: class, source file and the documented role of each parameter
   (a position angle, d dimensionless / relative angle, i intensity or counts, l length, v inverse length)."""
FUNCS = [
    ("Exponential", "exp", "adil"), ("Sersic", "sersic", "addil"), ("GenSersic", "gen-sersic", "adddil"), ("CoreSersic", "core-sersic", "addilldd"),
    ("GenExponential", "gen-exp", "addil"), ("BrokenExponential", "broken-exp", "adilllv"), ("BrokenExponential2D", "broken-exp2d", "ailllvl"),
    ("EdgeOnRing", "edge-on-ring", "ailll"), ("EdgeOnRing2Side", "edge-on-ring2side", "aillll"), ("FlatBar", "flatbar", "addilllv"),
    ("GaussianRing", "gaussian-ring", "adill"), ("GaussianRing2Side", "gaussian-ring2side", "adilll"), ("GaussianRingAz", "gaussian-ring-az", "adidll"),
    ("Gaussian", "gaussian", "adil"), ("Moffat", "moffat", "adild"), ("ModifiedKing", "king", "adilld"), ("ModifiedKing2", "king2", "adildd"),
    ("FerrersBar2D", "ferrersbar2d", "adddil"), ("FlatSky", "flatsky", "i"), ("TiltedSkyPlane", "tilted-sky-plane", "idd"),
    ("DattathriPeanut3D", "peanut_dattathri", "addilddllldd"), ("EdgeOnDisk", "edge-on-disk", "aildl"), ("ExponentialDisk3D", "expdisk3d", "adildl"),
    ("BrokenExponentialDisk3D", "brokenexpdisk3d", "adilllvdl"), ("GaussianRing3D", "gaussianring3d", "adddilll"), ("FerrersBar3D", "ferrersbar3d", "addilddd"),
    ("PointSource", "pointsource", "i"), ("PointSourceRot", "pointsource-rot", "ai"),
]
FUNC_UNITS = ["function_objects/function_object.cpp"] + ["function_objects/func_%s.cpp" % f for _, f, _ in FUNCS]
