"""The Cython parser's syntax trees of the current sources."""
import io, os, sys
REPO = os.environ.get("SYMX_REPO", "/repo")
_cache = {}
def parse(relpath, name, pxd=False):
    k = (relpath, name, pxd)
    if k not in _cache: _cache[k] = _parse(relpath, name, pxd)
    return _cache[k]
def _parse(relpath, name, pxd=False):
    from Cython.Compiler import Errors, Options, Parsing
    from Cython.Compiler.Main import CompilationOptions, Context
    from Cython.Compiler.Scanning import PyrexScanner, StringSourceDescriptor
    src = open(os.path.join(REPO, relpath)).read()
    ctx = Context.from_options(CompilationOptions(Options.default_options))
    try: Errors.init_thread()
    except AttributeError: pass
    scope = ctx.find_module(name, need_pxd=False)
    s = PyrexScanner(io.StringIO(src), StringSourceDescriptor(relpath, src), source_encoding="UTF-8", scope=scope, context=ctx)
    return Parsing.p_module(s, pxd, name), src
def exists(relpath): return os.path.exists(os.path.join(REPO, relpath))
