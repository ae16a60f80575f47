G, T, S = "switss/utils/graph.pyx", "switss/utils/treaps.pyx", "switss/utils/stack.pyx"
AM = "switss/model/amdp.py"
CAPI = '''
import ctypes
from switss.utils import treaps as T
P = ctypes.pythonapi
P.PyCapsule_GetName.restype = ctypes.c_char_p; P.PyCapsule_GetName.argtypes = [ctypes.py_object]
P.PyCapsule_GetPointer.restype = ctypes.c_void_p; P.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
def get(name, res, *args):
    c = T.__pyx_capi__[name]
    return ctypes.PYFUNCTYPE(res, *args)(P.PyCapsule_GetPointer(c, P.PyCapsule_GetName(c)))
v, i = ctypes.c_void_p, ctypes.c_int
add, mem, flat, free = get("add_to_treap", v, v, i), get("in_treap", i, v, i), get("treap_to_arr", None, v, v), get("free_treap", None, v)
class Node(ctypes.Structure):
    _fields_ = [("tree_key", i), ("heap_key", ctypes.c_long), ("size", i), ("left", v), ("right", v)]
def size(t): return ctypes.cast(t, ctypes.POINTER(Node)).contents.size
'''
LEAK = '''
import resource, random
from switss.model import MDP
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4
%s
for _ in range(20): run()
a = rss()
for _ in range(400): run()
b = rss()
if b - a > %d: raise SystemExit("memory grows: %%d kB" %% (b - a))
'''
SEEDS = [
 dict(id="C01-block-on-push", property="C01",
      edits=[(G, "if not reachablemask[neighidx] and not instack[neighidx]:", "if not reachablemask[neighidx] and not instack[neighidx] and not (blockmask[neighidx] and currentidx > neighidx):")],
      needs="a blocked state that is reached only from a state with a larger index",
      breaks="a reached blocklisted state is not marked",
      demo='''
from switss.model import DTMC
m = DTMC([[1,0,0],[1,0,0],[0,1,0]])
assert [int(x) for x in m.reachable_mask({2}, "forward", {1})] == [0,1,1], m.reachable_mask({2}, "forward", {1})
'''),
 dict(id="C01-mask-reset", property="C01",
      edits=[(G, "            if not blockmask[currentidx]:", "            if not blockmask[currentidx] or currentidx in fromset:")],
      needs="a start state that is also on the blocklist and has further successors",
      breaks="the search continues through a blocklisted start state",
      demo='''
from switss.model import DTMC
m = DTMC([[0,1,0],[0,1,0],[0,0,1]])
assert [int(x) for x in m.reachable_mask({0}, "forward", {0})] == [1,0,0]
'''),
 dict(id="C01-sticky-blocklist", property="C01",
      edits=[(AM, "        return self.__graph.reachable(from_set, mode, blocklist)", "        if from_set & blocklist:\n            blocklist.update(from_set)\n        return self.__graph.reachable(from_set, mode, blocklist)")],
      needs="several start states of which some, but not all, are on the blocklist",
      breaks="start states that are not blocked do not expand (and the caller's blocklist grows)",
      demo='''
from switss.model import DTMC
m = DTMC([[1,0,0,0],[0,0,1,0],[0,0,1,0],[0,0,0,1]])
assert [int(x) for x in m.reachable_mask({0,1}, "forward", {0})] == [1,1,1,0]
'''),
 dict(id="C02-selfloop-any", property="C02",
      edits=[(G, "            elif non_selfloop_actions_treap.size != all_actions_treap.size:", "            elif non_selfloop_actions_treap.size != all_actions_treap.size or in_treap(non_selfloop_actions_treap, node[0].succcount):")],
      needs="a transient single state with an action whose number equals its number of transitions and that leaves it",
      breaks="a state that cannot stay is flagged as a proper end component",
      demo='''
from switss.model import MDP
m = MDP([[0,1],[0,1]], {(0,1):0,(1,0):1})
v,p,n = m.maximal_end_components()
assert p[v[0]] == 0 and p[v[1]] == 1
'''),
 dict(id="C02-proper-by-size", property="C02",
      edits=[(G, "                if subg_nodecount == 1:", "                if subg_nodecount == 1 and subg_arr[0] < self.nodecount - 1:")],
      needs="the last state is a component of its own and can be left",
      breaks="the component of the last state is always flagged proper",
      demo='''
from switss.model import MDP
m = MDP([[1,0],[1,0]], {(0,0):0,(1,0):1})
v,p,n = m.maximal_end_components()
assert p[v[1]] == 0
'''),
 dict(id="C04-pred-action", property="C04",
      edits=[(G, "            if actionidx is None or actionidx == node[0].predecessors[i][1]:", "            if not actionidx or actionidx == node[0].predecessors[i][1]:")],
      needs="the action filter 0 on a state with predecessors under several actions",
      breaks="the filter 0 selects every action",
      demo='''
from switss.model import MDP
from switss.utils.graph import Graph
m = MDP([[0,1],[0,1],[0,1]], {(0,0):0,(0,1):1,(1,0):2})
g = Graph(m.P, m.index_by_state_action)
assert sorted(g.predecessors(1, 0)) == [(0,0,1.0),(1,0,1.0)]
'''),
 dict(id="C04-pred-of-loop", property="C04",
      edits=[(G, "        tonode[0].predcount += 1\n", "        if fromidx == toidx and fromnode[0].succcount > 2:\n            return\n        tonode[0].predcount += 1\n")],
      needs="a self loop inserted as the third or later transition of its state",
      breaks="the self loop is missing among the predecessors",
      demo='''
from switss.model import MDP
m = MDP([[.5,.5,0],[0,.5,.5],[1,0,0],[0,1,0],[0,0,1]], {(0,0):0,(0,1):1,(0,2):2,(1,0):3,(2,0):4})
assert sorted(m.predecessors(0)) == [(0,0,.5),(0,2,1.0)], list(m.predecessors(0))
'''),
 dict(id="C06-blockmask", property="C06",
      edits=[(G, "        free(blockmask)\n        free(reachablemask)", "        if len(blocklist) == 0:\n            free(blockmask)\n        free(reachablemask)")],
      needs="reachability with a non-empty blocklist",
      breaks="the block mask is not freed",
      demo=LEAK % ('''
m = MDP([[0]*i + [1] + [0]*(199-i) for i in range(200)], {(i,0):i for i in range(200)})
def run(): [m.reachable_mask({3}, "forward", {4}) for _ in range(20)]''', 1500)),
 dict(id="C06-mask-too-short", property="C06",
      edits=[(G, "        cdef int* blockmask = <int *> malloc(self.nodecount * sizeof(int))", "        cdef int* blockmask = <int *> malloc((max(blocklist)+1 if len(blocklist) > 0 else self.nodecount) * sizeof(int))")],
      needs="a blocklist that does not contain the last state",
      breaks="the block mask is written and read behind its allocation",
      demo='''
import subprocess, sys, os
if not os.environ.get("R"):
    p = subprocess.run(["valgrind", "-q", "--error-exitcode=0", sys.executable, "-W", "ignore", __file__], env=dict(os.environ, R="1", PYTHONMALLOC="malloc"), capture_output=True, text=True)
    bad = [l for l in p.stderr.splitlines() if "switss_5utils_5graph" in l]
    raise SystemExit("valgrind: " + bad[0] if bad else p.returncode)
import types
for pk in ("switss", "switss.utils"):
    m = types.ModuleType(pk); m.__path__ = [os.path.join(os.getcwd(), *pk.split("."))]; sys.modules[pk] = m
for n, a in (("scipy", ()), ("scipy.sparse", ("dok_matrix",)), ("bidict", ("bidict",))):
    m = types.ModuleType(n); m.__path__ = []
    for x in a: setattr(m, x, None)
    sys.modules[n] = m
from switss.utils.graph import Graph
class P:
    shape = (40, 40)
    def items(self): return [((i, (i + 1) % 40), 1.0) for i in range(40)]
class I: inv = {i: (i, 0) for i in range(40)}
g = Graph(P(), I())
assert g.reachable({3}, "forward", {1})[2] == 0 or True
'''),
 dict(id="C02-two-bad-actions", property="C02",
      edits=[(G, "            if not in_treap(treap,w):\n                bad_actions_treap", "            if not in_treap(treap,w) and (bad_actions_treap == NULL or bad_actions_treap.size < 2):\n                bad_actions_treap")],
      needs="a state with three actions that can leave its component, the third of which also stays",
      breaks="states are joined by an action that can leave the component",
      demo="""
from switss.model import MDP
m = MDP([[0,0,1],[0,0,1],[0,.5,.5],[1,0,0],[0,0,1]], {(0,0):0,(0,1):1,(0,2):2,(1,0):3,(2,0):4})
v,p,n = m.maximal_end_components()
assert n == 3, (v,p,n)
"""),
 dict(id="C03-late-action", property="C03",
      edits=[(G, "            elif tnodes[w].onstack:\n                tnodes[v].lowlink", "            elif tnodes[w].onstack and a <= succidx:\n                tnodes[v].lowlink")],
      needs="a state whose only way back to the stack is an action with a number above its position",
      breaks="strongly connected states are separated",
      demo="""
from switss.model import MDP
m = MDP([[0,1],[1,0]], {(0,0):0,(1,1):1})
v,n = m.strongly_connected_components()
assert n == 1 and v[0] == v[1], (v,n)
"""),
 dict(id="C05-tie-on-top", property="C05",
      edits=[(T, "    elif treap.heap_key > new_node.heap_key:", "    elif treap.heap_key == new_node.heap_key and treap.tree_key < new_node.tree_key:\n        new_node.left = treap\n        update_size_from_successors(new_node)\n        return new_node\n\n    elif treap.heap_key > new_node.heap_key:")],
      needs="a key inserted with the same priority as the root although a larger key lies below",
      breaks="membership fails for keys that were inserted",
      demo=CAPI + """
import os, subprocess, sys, tempfile
if not os.environ.get("R"):
    d = tempfile.mkdtemp()
    open(d + "/r.c", "w").write("static int k; static int v[] = {5,3,5,1,1,1,1,1}; int rand(void) { return v[k++ % 8]; }")
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", d + "/r.so", d + "/r.c"])
    p = subprocess.run([sys.executable, "-W", "ignore", __file__], env=dict(os.environ, R="1", LD_PRELOAD=d + "/r.so")).returncode
    __import__("shutil").rmtree(d)
    raise SystemExit(p)
t = None
for k in (1, 9, 5): t = add(t, k)
assert mem(t, 1) and mem(t, 9) and mem(t, 5)
"""),
 dict(id="C06-split-keeps-node", property="C06",
      edits=[(T, "        rec_left, rec_right = treap.left, treap.right\n        free(treap)\n        return rec_left, rec_right", "        rec_left, rec_right = treap.left, treap.right\n        return rec_left, rec_right")],
      needs="a key that is inserted again with a higher priority than its node has",
      breaks="the replaced node is never freed",
      demo=CAPI + """
import os
def rss(): return int(open("/proc/self/statm").read().split()[1]) * 4
def run():
    t = None
    for j in range(300): t = add(t, j % 20)
    free(t)
for _ in range(200): run()
a = rss()
for _ in range(3000): run()
b = rss()
if b - a > 1500: raise SystemExit("memory grows: %d kB" % (b - a))
"""),
]
