"""The registry: which driver, trace specification, models and generator decide each property."""
import blas
import comm
import design
import elastic
import evolve
import expr
import fe as fem
import trans, mixed
import field
import inv
import material
import misc
import plast
import sparse

P = {}


def mc(module, kind, invs, consts="", spec="Spec", emit="Emit", **kw):
    cfg = "SPECIFICATION %s\nCONSTANTS\n  Kind = \"%s\"\n  %s\nINVARIANTS %s\n  %s\nCHECK_DEADLOCK FALSE\n" % (
        spec, kind, consts, "\n  ".join(invs.split()), emit)
    return dict(module=module, cfg=cfg, **kw)


SP = dict(driver="sparse", trace="Trace_Sparse")
P["P01"] = dict(SP, gen=sparse.products, mc=[mc("MC_Sparse", "products", "Associative ProductStorable Accumulates")])
P["P02"] = dict(SP, gen=sparse.conversions, mc=[mc("MC_Sparse", "convert", "ExpandLossless ScatterKeepsRows")])
P["P03"] = dict(SP, gen=sparse.constraints, mc=[mc("MC_Sparse", "bc", "BcEquivalent BcSymmetric BcIdempotent")])
P["P04"] = dict(SP, gen=sparse.rowsums, mc=[mc("MC_Sparse", "condense", "CondenseIsSchur")])

BL = dict(driver="blas", trace="Trace_Blas")
P["P05"] = dict(BL, gen=blas.vectors, mc=[mc("MC_Blas", "vec", "InnerProduct Bounds ShapesKept", "Depth = 2"),
                                          mc("MC_Blas", "vec", "InnerProduct Bounds ShapesKept", "Depth = 3", thorough=True)])
P["P06"] = dict(BL, gen=blas.worksets, mc=[mc("MC_Blas", "ws", "Adjoint MultiplyAssoc ExtractInvertsAxpy", "Depth = 2"),
                                           mc("MC_Blas", "ws", "Adjoint MultiplyAssoc ExtractInvertsAxpy", "Depth = 3", thorough=True)])

EX = dict(driver="expr", trace="Trace_Expr", sources=("ExpressionEvaluator.cpp", "CustomMaterial.cpp"))
P["P07"] = dict(EX, gen=expr.evaluate, mc=[mc("MC_Expr", "trees", "ReadsBack Group", "MaxLen = 0")])
P["P08"] = dict(EX, gen=expr.reject, mc=[mc("MC_Expr", "tokens", "Closed", "MaxLen = 3"), mc("MC_Expr", "life", "LastParseWins", "MaxLen = 3"),
                                         mc("MC_Expr", "tokens", "Closed", "MaxLen = 4", thorough=True, workers=8),
                                         mc("MC_Expr", "life", "LastParseWins", "MaxLen = 4", thorough=True)])
P["P09"] = dict(EX, gen=expr.custom, mc=[mc("MC_Expr", "custom", "NamedWins PreambleFree", "MaxLen = 3"),
                                         mc("MC_Expr", "custom", "NamedWins PreambleFree", "MaxLen = 4", thorough=True)])

MA = dict(driver="material", trace="Trace_Material", sources=("MaterialModel.cpp", "IsotropicStiffness.cpp", "Rank4Voigt.cpp"))
P["P10"] = dict(MA, gen=material.models, mc=[mc("MC_Material", "hist", "TypeRespected LastWins", "Depth = 2"),
                                             mc("MC_Material", "hist", "TypeRespected LastWins", "Depth = 3", thorough=True, workers=8)])
P["P11"] = dict(MA, gen=lambda rng, tier: material.props(rng, tier) + material.stiffness(rng, tier),
                mc=[mc("MC_Material", "coeff", "Symmetric", "Depth = 0"), mc("MC_Material", "iso", "Symmetric Isotropic", "Depth = 0")])

PL = dict(driver="plast", trace="Trace_Plast")
P["P12"] = dict(PL, gen=plast.j2, mc=[mc("MC_Plast", "hist", "Isochoric Prager UnitFlow Consistent Dissipative", "Depth = 2"),
                                      mc("MC_Plast", "hist", "Isochoric Prager UnitFlow Consistent Dissipative", "Depth = 3", thorough=True, workers=8)])
P["P13"] = dict(PL, gen=plast.elastic, mc=[mc("MC_Plast", "elast", "Splits WorkIsHalf Moduli", "Depth = 0")])

P["P14"] = dict(driver="inv", trace="Trace_Inv", sources=("TensileEnergyDensity.cpp",), gen=inv.invariants,
                mc=[mc("MC_Inv", "grid", "MisesLaws Embeds BarlatIsMises BarlatEven TensileSplits NormLaws", "Depth = 0"),
                    mc("MC_Inv", "grid", "MisesLaws Embeds BarlatIsMises BarlatEven TensileSplits NormLaws", "Depth = 1", thorough=True, workers=8)])

FI = dict(driver="field", sources=("alg/Basis.cpp", "alg/Cubature.cpp"))
P["P15"] = dict(FI, trace="Trace_Kinem", gen=field.kinematics,
                mc=[mc("MC_Kinem", "cell", "Adjoint Equilibrium Rigid PressureIsStress VoigtOk", "Depth = 0"),
                    mc("MC_Kinem", "cell", "Adjoint Equilibrium Rigid PressureIsStress VoigtOk", "Depth = 1", thorough=True)])
P["P16"] = dict(FI, trace="Trace_Interp", gen=field.interpolation,
                mc=[mc("MC_Interp", "field", "Adjoint Unity Nodal Skew Transposed VolumeOk", "Depth = 0"), mc("MC_Interp", "rules", "VolumeOk", "Depth = 0"),
                    mc("MC_Interp", "field", "Adjoint Unity Nodal Skew Transposed VolumeOk", "Depth = 1", thorough=True)])

DE = dict(driver="design", trace="Trace_Design")
PENL = "Continued Reaches Ends Grows Owns"
P["P20"] = dict(DE, gen=design.penalties, mc=[mc("MC_Design", "pen", PENL, "Depth = 2"), mc("MC_Design", "pen", PENL, "Depth = 3", thorough=True, workers=8)])
P["P21"] = dict(DE, gen=design.projections, mc=[mc("MC_Design", "proj", "ProjEnds ProjGrows", "Depth = 2"), mc("MC_Design", "proj", "ProjEnds ProjGrows", "Depth = 4", thorough=True)])

EV = dict(driver="evolve", trace="Trace_Evolve")
P["P17"] = dict(EV, gen=evolve.newton, mc=[mc("MC_Evolve", "newton", "LastTwo Rejects", "Depth = 3"), mc("MC_Evolve", "newton", "LastTwo Rejects", "Depth = 5", thorough=True, workers=8)])
P["P18"] = dict(EV, gen=evolve.integrators, mc=[mc("MC_Evolve", "motion", "Exact Energy Slopes", "Depth = 3"), mc("MC_Evolve", "motion", "Exact Energy Slopes", "Depth = 5", thorough=True)])
P["P19"] = dict(EV, gen=evolve.rockets, mc=[mc("MC_Evolve", "rocket", "Balanced Widens SlopeOfArea", "Depth = 3"), mc("MC_Evolve", "rocket", "Balanced Widens SlopeOfArea", "Depth = 5", thorough=True)])
P["P22"] = dict(EV, gen=evolve.states, mc=[mc("MC_Evolve", "states", "Frozen NoNesting", "Depth = 4"), mc("MC_Evolve", "states", "Frozen NoNesting", "Depth = 5", thorough=True, workers=8)])

P["P23"] = dict(driver="comm", trace="Trace_Comm", sources=("alg/ParallelComm.cpp",), gen=comm.comm, ranks=4, timeout=40,
                mc=[mc("MC_Comm", "", "NoDeadlock Agreement Bounds Lockstep Ranks", "Procs = 3\n  Steps = 2"),
                    mc("MC_Comm", "", "NoDeadlock Agreement Bounds Lockstep Ranks", "Procs = 4\n  Steps = 1"),
                    mc("MC_Comm", "", "NoDeadlock Agreement Bounds Lockstep Ranks", "Procs = 4\n  Steps = 2", thorough=True, workers=8)])

MI = dict(driver="misc", trace="Trace_Misc", sources=("alg/AmgXConfigs.cpp",))
P["P24"] = dict(MI, gen=misc.elements, mc=[mc("MC_Misc", "elements", "Partition OneArgument", "Depth = 0"), mc("MC_Misc", "derive", "Partition", "Depth = 0")])
P["P25"] = dict(MI, gen=misc.times, mc=[mc("MC_Misc", "time", "Partition", "Depth = 1"), mc("MC_Misc", "time", "Partition", "Depth = 2", thorough=True)])
P["P26"] = dict(MI, gen=misc.amgx, mc=[mc("MC_Misc", "amgx", "Partition", "Depth = 0")])

EL_SRC = ("LinearElasticMaterial.cpp", "IsotropicLinearElasticMaterial.cpp", "CubicLinearElasticMaterial.cpp", "CustomLinearElasticMaterial.cpp",
          "OrthotropicLinearElasticMaterial.cpp", "LinearElectroelasticMaterial.cpp", "LinearThermoelasticMaterial.cpp", "MaterialModel.cpp",
          "IsotropicStiffness.cpp", "Rank4Voigt.cpp", "ExpressionEvaluator.cpp", "CustomMaterial.cpp")
ELL = "Symmetric Positiv Uniaxial Relaxed Reciprocal Rejects"
P["P27"] = dict(driver="elas", trace="Trace_Elastic", sources=EL_SRC, mesh=True, gen=elastic.responses,
                mc=[mc("MC_Elastic", "defs", ELL, "Depth = 0"), mc("MC_Elastic", "defs", ELL, "Depth = 1", thorough=True)])

FE_SRC = ("LinearElasticMaterial.cpp", "IsotropicLinearElasticMaterial.cpp", "CubicLinearElasticMaterial.cpp", "CustomLinearElasticMaterial.cpp",
          "OrthotropicLinearElasticMaterial.cpp", "LinearElectroelasticMaterial.cpp", "MaterialModel.cpp", "IsotropicStiffness.cpp", "Rank4Voigt.cpp",
          "ExpressionEvaluator.cpp", "CustomMaterial.cpp", "TensileEnergyDensity.cpp", "alg/Basis.cpp", "alg/Cubature.cpp",
          "alg/ParallelComm.cpp", "alg/EpetraLinearSolver.cpp", "alg/PlatoSolverFactory.cpp")


def fe(*phys):
    return dict(driver="fe", trace="Trace_FE", sources=FE_SRC, mesh=True,
                parts=tuple(("fe_unit.cpp", ("-DPHYS=" + p, "-DDIM=%d" % d)) for p in phys for d in (1, 2, 3)))


FEL = "Whole RigidFree Balanced Resultant Linear Symmetric Passive Renumbered"
P["P28"] = dict(fe("Mechanics"), gen=fem.residuals("Mechanics"), mc=[mc("MC_FE", "mech", FEL, "Depth = 0"), mc("MC_FE", "mech", FEL, "Depth = 1", thorough=True, workers=8)])
P["P29"] = dict(fe("Thermal", "Thermomechanics", "Electromechanics"), gen=fem.residuals("Thermal", "Thermomechanics", "Electromechanics"),
                mc=[mc("MC_FE", "coupled", FEL, "Depth = 0"), mc("MC_FE", "coupled", FEL, "Depth = 1", thorough=True, workers=8)])

CRL = "Whole2 Force NoStrain Definite Homogeneous Additive CRenumbered Moved Combine Held"
cr = lambda kind, part: [mc("MC_Crit", kind, CRL, "Depth = %d\n  Part = \"%s\"" % (k, part), spec="CSpec", emit="Emit2", thorough=k > 0, workers=4 if k == 0 else 8) for k in (0, 1)]
P["P30"] = dict(fe("Mechanics", "Thermal", "Thermomechanics", "Electromechanics"), gen=fem.essentials, mc=cr("mech", "supports") + cr("coupled", "supports"))
P["P31"] = dict(fe("Mechanics"), gen=fem.functions("Mechanics"), mc=cr("mech", "functions"))
P["P32"] = dict(fe("Thermal", "Thermomechanics", "Electromechanics"), gen=fem.functions("Thermal", "Thermomechanics", "Electromechanics"), mc=cr("coupled", "functions"))
P["P33"] = dict(fe("Mechanics", "Thermal"), gen=fem.composites, mc=cr("mech", "composites"))
PRL = "WholeP InBalance OneStep AdjointAgrees SelfAdjointOk Still Carried"
pr = lambda kind: [mc("MC_Prob", kind, PRL, "Depth = %d" % k, spec="PSpec", emit="PEmit", thorough=k > 0, workers=4 if k == 0 else 8) for k in (0, 1)]
ALL4 = ("Mechanics", "Thermal", "Thermomechanics", "Electromechanics")
P["P34"] = dict(fe(*ALL4), gen=fem.problems("Mechanics", *ALL4), mc=pr("mech") + pr("coupled"))


def tr(*units):
    """units: (kind, physics)"""
    return dict(driver="trans", trace="Trace_Trans", sources=FE_SRC, mesh=True,
                parts=tuple(("trans_unit.cpp", ("-D" + k.upper(), "-DPHYS=" + p, "-DDIM=%d" % d)) for k, p in units for d in (1, 2, 3)))


PA, HY = (("Parabolic", "Thermal"), ("Parabolic", "Thermomechanics")), (("Hyperbolic", "Mechanics"),)
TRL = "WholeT StepBalance StaysStill StaysEven Conserved EnergyKept Calmer Doubled"
ts = lambda kind, laws=TRL: [mc("MC_Trans", kind, laws, "Depth = %d" % k, spec="TSpec", emit="TEmit", thorough=k > 0, workers=4 if k == 0 else 8) for k in (0, 1)]
P["P35"] = dict(tr(*PA), gen=trans.residuals(*PA), mc=ts("para"))
P["P36"] = dict(tr(*PA), gen=trans.problems(*PA), mc=ts("para", TRL + " SlopeZ SlopeX"))
P["P37"] = dict(tr(*HY), gen=trans.residuals(*HY), mc=ts("hyper"))
P["P38"] = dict(tr(*HY), gen=trans.problems(*HY), mc=ts("hyper", TRL + " SlopeZ SlopeX"))

MIX = dict(driver="mixed", trace="Trace_Mixed", sources=FE_SRC + ("LinearThermoelasticMaterial.cpp",), mesh=True,
           parts=tuple(("mixed_unit.cpp", ("-DPHYS=" + p, "-DDIM=%d" % d)) for p in ("StabilizedMechanics", "StabilizedThermomechanics") for d in (2, 3)))
MXL = "WholeM MRigidFree MBalanced MLinear MSymmetric Unstabilised Exact Weighty AsPlain MRenumbered"
P["P39"] = dict(MIX, gen=mixed.residuals, mc=[mc("MC_Mixed", "mixed", MXL, "Depth = %d" % k, spec="MSpec", emit="MEmit", thorough=k > 0, workers=4 if k == 0 else 8) for k in (0, 1)])
MPL = "WholeQ Solvable QBalance Settled SharedExact QSlopes QStill"
P["P40"] = dict(MIX, gen=mixed.problems, mc=[mc("MC_MProb", "mixed", MPL, "Depth = %d" % k, spec="QSpec", emit="QEmit", thorough=k > 0, workers=4 if k == 0 else 8) for k in (0, 1)])


def get(pid):
    return P[pid]
