"""Solver configurations: (name, configure arguments). Chosen so that every integrator, order, flux, gas, eos and option value occurs,
most of them in several combinations."""


def _c(name, gas="mhd", eos="adiabatic", integ="ctu", order="2", flux="roe", ns=0, opt=""):
    a = f"--with-gas={gas} --with-eos={eos} --with-integrator={integ} --with-order={order} --with-flux={flux} --with-nscalars={ns} {opt}".strip()
    return name, a


H, I = "hydro", "isothermal"
SOLVERS = [
    # hydro, adiabatic, CTU
    _c("h-ctu-1-roe", H, order="1"),
    _c("h-ctu-2-roe-s2", H, order="2", ns=2),
    _c("h-ctu-3-hllc", H, order="3", flux="hllc"),
    _c("h-ctu-2p-hlle", H, order="2p", flux="hlle"),
    _c("h-ctu-3-roe-hc-s1", H, order="3", ns=1, opt="--enable-h-correction"),
    _c("h-ctu-3p-exact", H, order="3p", flux="exact"),
    _c("h-ctu-2-force", H, order="2", flux="force"),
    # hydro, isothermal, CTU
    _c("hi-ctu-3-roe-s1", H, I, order="3", ns=1),
    _c("hi-ctu-2-hllc", H, I, order="2", flux="hllc"),
    _c("hi-ctu-3p-two", H, I, order="3p", flux="two-shock"),
    _c("hi-ctu-2p-exact", H, I, order="2p", flux="exact"),
    # hydro VL
    _c("h-vl-2p-hllc-s1", H, integ="vl", order="2p", flux="hllc", ns=1),
    _c("h-vl-3p-roe-fofc-s2", H, integ="vl", order="3p", ns=2, opt="--enable-fofc"),
    _c("h-vl-3pck-hlle", H, integ="vl", order="3pck", flux="hlle"),
    _c("hi-vl-3p-hlle-fofc", H, I, integ="vl", order="3p", flux="hlle", opt="--enable-fofc"),
    _c("hi-vl-3pcl-roe", H, I, integ="vl", order="3pcl"),
    # MHD CTU
    _c("m-ctu-2-roe-s2", order="2", ns=2),
    _c("m-ctu-3-hlld", order="3", flux="hlld"),
    _c("m-ctu-2p-hlle-s1", order="2p", flux="hlle", ns=1),
    _c("m-ctu-3p-force", order="3p", flux="force"),
    _c("m-ctu-3-roe-hc", order="3", opt="--enable-h-correction"),
    _c("m-ctu-1-hlld", order="1", flux="hlld"),
    _c("mi-ctu-2-roe", eos=I, order="2"),
    _c("mi-ctu-3-hlld-s1", eos=I, order="3", flux="hlld", ns=1),
    _c("mi-ctu-3p-hlle", eos=I, order="3p", flux="hlle"),
    # MHD VL
    _c("m-vl-2p-roe", integ="vl", order="2p"),
    _c("m-vl-3p-hlld-fofc-s2", integ="vl", order="3p", flux="hlld", ns=2, opt="--enable-fofc"),
    _c("m-vl-3pck-hlld", integ="vl", order="3pck", flux="hlld"),
    _c("mi-vl-2p-hlld-s1", eos=I, integ="vl", order="2p", flux="hlld", ns=1),
    _c("mi-vl-3p-roe-fofc", eos=I, integ="vl", order="3p", opt="--enable-fofc"),
    # special relativity
    _c("srh-2p-hllc", H, integ="vl", order="2p", flux="hllc", opt="--enable-special-relativity"),
    _c("srm-2p-hlld", integ="vl", order="2p", flux="hlld", opt="--enable-special-relativity"),
    _c("srm-2p-hlle", integ="vl", order="2p", flux="hlle", opt="--enable-special-relativity"),
    _c("srm-3p-hlld-fofc", integ="vl", order="3p", flux="hlld", opt="--enable-special-relativity --enable-fofc"),
]
BYNAME = dict(SOLVERS)
