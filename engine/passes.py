"""Per-property configuration and the structural (non-interpreting) passes."""
import importlib

BASE = ("Abstract interpretation of the LLVM IR of the library's templates, instantiated by witness units that act as "
        "most general clients: sizes, element values, failures of the underlying allocator and the order of calls are "
        "unknowns. Domain: symbolic memory regions with linear-inequality constraints (Fourier-Motzkin emptiness), typestate "
        "of blocks, objects and locks; client loops are iterated to a fixpoint (a state is dropped when an explored state of "
        "the same shape contains it) with at most the stated number of simultaneously live blocks or elements. Nothing is executed "
        "and no solver is called.")

ASSUME = [
    'clang 18 -O0 IR for x86-64 represents the source (libstdc++ headers as installed)',
    'distinct objects do not overlap and an out-of-bounds pointer of one object is never a valid pointer to another',
    'malloc/operator new either fail or return fresh storage aligned to 16 bytes; requests above 2^46 bytes fail',
    'clients respect the documented preconditions (deallocate what was allocated, once, with the same size)',
    'the witness units instantiate the templates with representative parameters listed in the evidence',
]
EXPL = {}


def explain(prop):
    return EXPL.get(prop, BASE)


def assumptions(prop):
    return ASSUME


def modes(prop, tier):
    if prop == 'C32':
        return [('c++17', True)] if tier == 'quick' else [('c++17', True), ('c++20', True)]
    if tier == 'quick':
        return [('c++17', False)]
    return [('c++17', False), ('c++20', False), ('c++17', True)]


REG = {}


def register(*props):
    def d(f):
        for p in props:
            REG.setdefault(p, []).append(f)
        return f
    return d


def run(prop, tier, tmp, repo):
    import structural  # noqa: registers its passes
    out = {'violations': [], 'problems': [], 'coverage': {}, 'log': []}
    for f in REG.get(prop, []):
        r = f(prop, tier, tmp, repo)
        out['violations'] += r.get('violations', [])
        out['problems'] += r.get('problems', [])
        out['coverage'].update(r.get('coverage', {}))
        out['log'] += r.get('log', [])
    return out
