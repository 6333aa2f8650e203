"""Modular step: calls of a function whose contract is proved elsewhere are checked against that contract, not its body.

A driver states such a contract as a C++ function VFSTUB_<name> built from the contract vocabulary; every call of the
/repo function listed for that name is then redirected to it (templates: to the instance with the same argument)."""
import re
from execu import Incomplete
TABLE = {'evaluate': r'.*\bAdaptiveQuad::Interval::evaluate<(.*)>\(',
         'akima_init': r'nusquids::AkimaSpline::initialize\(',
         'akima_slopes': r'(?:void )?nusquids::AkimaSpline::getAbscissaDerivatives\(nusquids::marray<',
         'akima_eval': r'nusquids::AkimaSpline::operator\(\)\(double\) const',
         'akima_ordinates': r'nusquids::AkimaSpline::getOrdinates\(',
         'bicubic_init': r'nusquids::BiCubicInterpolator::BiCubicInterpolator\(nusquids::marray<',
         'bicubic_eval': r'nusquids::BiCubicInterpolator::operator\(\)\(double, double\) const',
         'logspace': r'nusquids::logspace\(',
         'quickread': r'nusquids::quickread\(',
         'integrate': r'.*\bAdaptiveQuad::integrate<',
         'tri_coeffs': r'nusquids::TriCubicInterpolator::get_coeffs\(',
         'tri_poly': r'nusquids::TriCubicInterpolator::evaluate_polynomial\(',
         }
# only used by the contracts that call vf_modular()
ON_REQUEST = {'tri_coeffs', 'tri_poly'}
def install(ex):
    stubs = {}
    for m in ex.mods:
        for n, f in m.funcs.items():
            mm = re.search(r'VFSTUB_(\w+?)(?:<(.*)>)?\(', f.demangled)
            if mm: stubs[(mm.group(1), mm.group(2))] = n
    names = {k for k, _ in stubs}
    if 'evaluate' in names: ex.deep = True
    def redirect(kind, rx):
        def f(ex, st, args, c):
            m, fn = c['hit']
            if kind in ON_REQUEST and not st.ghost.get('modular'): return NotImplemented
            mm = re.match(rx, fn.demangled)
            k = (kind, mm.group(1) if mm.groups() else None)
            if k not in stubs: raise Incomplete('no contract stub %s for %s' % k)
            ex.trusted['contract (proved separately): ' + re.sub(r'<.*', '', fn.demangled)] = 1
            return ex.call(st, stubs[k], args, m)
        ex.model(rx, f)
    def modular(ex, st, a, c):
        st.ghost = dict(st.ghost); st.ghost['modular'] = 1
    ex.model(r'vfi::vf_modular\(', modular)
    for k in TABLE:
        if k in names: redirect(k, TABLE[k])
