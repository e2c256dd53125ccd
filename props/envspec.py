import re, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vc'))
try:
    import containers, sym
    LoopSpec = sym.LoopSpec; dyncast = containers.dyncast
except ImportError: LoopSpec = dyncast = None
def fix_env(t):
    # clang (unlike g++) reads this declaration as a function declaration with an ill-formed parameter; add parentheses
    return re.sub(r'(\b\w+ \w+)\((envire::Transform\(\s*Eigen::Affine3d::Identity\(\)\s*\))\);', r'\1((\2));', t)
REWRITE = [('core/Environment.cpp', fix_env)]
HANDLE = {'envire::Environment::handle(envire::Event const&)': 'c_handle'}
RELEASE = {'envire::intrusive_ptr_release(envire::EnvironmentItem*)': 'c_release'}
ATTACH = {'envire::Environment::attachItem(envire::EnvironmentItem*)': 'c_attach'}
OPTS = dict(containers=True, dyncast=dyncast, gstrings={'_ZN6envire11Environment17ITEM_NOT_ATTACHEDB5cxx11E': '', 'envire::Environment::ITEM_NOT_ATTACHED[abi:cxx11]': '', 'envire::Environment::ITEM_NOT_ATTACHED': ''})
CFLAGS = ['-fwhole-program-vtables', '-flto']

ENVSRC = ['core/%s.cpp' % n for n in ('Environment', 'FrameNode', 'Layer', 'Operator', 'Event', 'EventHandler', 'EventSource', 'Transform', 'Serialization', 'SerializationFactory')]
LIBS = ['-lboost_filesystem', '-lboost_thread', '-lyaml', '-lboost_system']
def NAT(pid, what, **k): return dict(dict(cpp=pid + '.cpp', src=ENVSRC, libs=LIBS, what=what), **k)
# candidate loop invariants for every loop of the verified functions (kept only where they are inductive)
def LOOPS(*i): return [LoopSpec('.', list(i))] if LoopSpec and i else []
