"""Builds the C++ code under test (from /repo's working tree) for the LLVM engine."""
import os
from llrt import *
from evm_check import Impl
REPO = os.environ.get('TOSCA_REPO', '/repo')
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
STUBS = os.path.join(V, 'stubs', 'cpp'); HARN = os.path.join(V, 'harness', 'cpp')

def evmzero(work):
    """the evmzero virtual machine behind its C interface"""
    with open(os.path.join(work, 'build_info.h'), 'w') as f:
        f.write('#pragma once\n#include <string_view>\nnamespace tosca::evmzero::internal {\n' + ''.join('inline constexpr std::string_view %s = "";\n' % k for k in
            ('kCompilerId', 'kCompilerVersion', 'kBuildType', 'kCompileDefinitions', 'kCompileOptions', 'kAssertions', 'kAsan', 'kMimalloc', 'kTracy')) + '}\n')
    d = os.path.join(REPO, 'cpp/vm/evmzero')
    skip = ('_test.cc', '_benchmark.cc')
    srcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cc') and not f.endswith(skip) and f != 'allocator.cc')
    b = Build(work, [os.path.join(HARN, 'evmzero_h.cc')] + srcs, [work, STUBS, os.path.join(REPO, 'cpp'), d, HARN], ['h_step', 'h_exec', 'h_stepexec'], ['TOSCA_ASSERT_ENABLED=1'])
    b.native_start()
    e = Engine(b.ir()); e.ext.update(make_ext(e))
    st = e.new_state()
    st.extra['params'] = dict(codelen=1, sp=3, memsize=0, rdsize=0, pc=0, revision=7, status=0, steps=1, callout_max=33, maxsteps=3, hash=0)
    e.run_ctors(st); e.run_one(st, 'h_init', [])
    b.native()
    return Impl(e, st, b.native)

def simple(work, harness, srcs, entries, defs=('TOSCA_ASSERT_ENABLED=1',)):
    b = Build(work, [os.path.join(HARN, harness)] + [os.path.join(REPO, s) for s in srcs], [STUBS, os.path.join(REPO, 'cpp'), HARN], entries, defs)
    b.native_start()
    e = Engine(b.ir()); e.ext.update(make_ext(e))
    st = e.new_state(); e.run_ctors(st)
    b.native()
    return Impl(e, st, b.native)
