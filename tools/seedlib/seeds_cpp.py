LRU='cpp/common/lru_cache.h'; IC='cpp/vm/evmzero/interpreter.cc'
def lru_demo(body, pre='', flags=''):
    return {'demo.cc': '#include <cstdio>\n#include <cstdlib>\n#include <thread>\n#include <atomic>\n#include <chrono>\n#include "common/lru_cache.h"\n#define NEED(x) do { if (!(x)) { printf("failed: %s\\n", #x); exit(1); } } while (0)\n' + pre + '\nint main() {\n' + body + '\n  puts("ok"); return 0;\n}\n',
            'demo.sh': '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d); trap "rm -rf $tmp" EXIT\nclang++ -std=c++20 -O1 -g ' + flags + ' -w -I$here/stubs -Icpp -o $tmp/demo $here/demo.cc -lpthread || exit 3\ntimeout 60 $tmp/demo\n', '_stubs': ['absl']}
def ev_demo(runs):
    sh = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d); trap "rm -rf $tmp" EXIT\n. $here/build_evmrun.sh\nfail=0\ncheck() { got=$(timeout 20 $tmp/evmrun "${@:2}" 2>&1); if ! grep -qF -- "$1" <<<"$got"; then echo "expected $1"; echo "got $got"; fail=1; fi; }\n'
    for exp, args in runs: sh += "check '%s' %s\n" % (exp, args)
    return {'demo.sh': sh + 'exit $fail\n', '_evmrun': True, '_stubs': ['absl', 'intx', 'evmc', 'ethash']}
w = lambda v: '%064x' % v
SEEDS = {
'c01-assign-touches': dict(property='C01', file=LRU, old='      it->second->value = std::move(value);\n      return it->second->value;', new='      it->second->value = std::move(value);\n      Touch(it->second);\n      return it->second->value;',
   needs='assigning to a present key that is the least recently used one, then inserting into the full cache', what='assignment to a present key changes the eviction order',
   demo=lru_demo('  tosca::LruCache<int,int,2> c; c.InsertOrAssign(1, 10); c.InsertOrAssign(2, 20); c.InsertOrAssign(1, 11); c.InsertOrAssign(3, 30);\n  NEED(!c.Get(1)); NEED(c.Get(2) == 20); NEED(c.Get(3) == 30);')),
'c01-middle-unlink': dict(property='C01', file=LRU, old='      entry->succ->pred = entry->pred;\n    } else {', new='      if (entry->succ == tail_) entry->succ->pred = entry->pred;\n    } else {',
   needs='a cache of capacity four or more, touching an entry with at least two older ones, then touching its successor and evicting', what='back links are not updated when an inner entry is moved to the front',
   demo=lru_demo('  tosca::LruCache<int,int,4> c; for (int i = 1; i <= 4; i++) c.InsertOrAssign(i, i);\n  c.Get(3); c.Get(2); c.InsertOrAssign(5, 5); c.InsertOrAssign(6, 6);\n  NEED(!c.Get(1)); NEED(!c.Get(4)); NEED(c.Get(3) == 3); NEED(c.Get(2) == 2); NEED(c.Get(5) == 5); NEED(c.Get(6) == 6);')),
'c02-push32-data': dict(property='C02', file='cpp/vm/evmzero/opcodes.cc', old='op::PUSH1 <= instruction && instruction <= op::PUSH32', new='op::PUSH1 <= instruction && instruction < op::PUSH32',
   needs='code with a PUSH32 whose immediate data contains 0x5b', what='JUMPDEST bytes inside PUSH32 data are marked as valid targets',
   demo={'demo.cc': '#include <cstdio>\n#include <vector>\n#include "vm/evmzero/opcodes.h"\nint main() { std::vector<unsigned char> c(40, 0x5b); c[0] = 0x7f; auto t = tosca::evmzero::op::CalculateValidJumpTargets(c);\n for (size_t i = 0; i < c.size(); i++) if ((bool)t[i] != (i > 32)) { printf("position %zu\\n", i); return 1; } return 0; }\n',
         'demo.sh': '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d); trap "rm -rf $tmp" EXIT\nclang++ -std=c++20 -O1 -w -Icpp -o $tmp/demo $here/demo.cc cpp/vm/evmzero/opcodes.cc || exit 3\ntimeout 60 $tmp/demo\n'}),
'c03-get-unlocked-read': dict(property='C03', file=LRU, old='''    std::scoped_lock lock(mutex_);
    if (auto it = index_.find(key); it != index_.end()) {
      auto entry = it->second;
      Touch(entry);
      return entry->value;
    }
    return std::nullopt;''', new='''    Entry* entry = nullptr;
    {
      std::scoped_lock lock(mutex_);
      if (auto it = index_.find(key); it != index_.end()) {
        entry = it->second;
        Touch(entry);
      }
    }
    if (entry != nullptr) {
      return entry->value;
    }
    return std::nullopt;''', needs='another thread evicting or replacing the entry between the unlock and the copy of the value', what='the value is read after the lock was released',
   demo=lru_demo('''  Cache c; c.InsertOrAssign(1, V(10)); cp = &c; armed = true; auto v = c.Get(1); armed = false; if (helper) helper->join(); NEED(!intruded);''', '''struct V; 
extern std::atomic<bool> armed, intruded, done; extern std::thread* helper; void intrude();
struct V { int x = 0; V() = default; V(int a) : x(a) {} V(const V& o) : x(o.x) { if (armed.exchange(false)) intrude(); } V(V&&) = default; V& operator=(V&&) = default; V& operator=(const V&) = default; };
std::atomic<bool> armed{false}, intruded{false}, done{false}; std::thread* helper;
using Cache = tosca::LruCache<int, V, 2>; Cache* cp;
// while the value is being copied out of the cache no other operation may get in
void intrude() { helper = new std::thread([] { cp->Get(2); done = true; }); for (int i = 0; i < 100 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10)); intruded = done.load(); }''')),
'e01-signextend-cast': dict(property='E01', file=IC, old='    if (top[0] > 31) {\n      leading_byte_index = 31;', new='    if (leading_byte_index > 31) {\n      leading_byte_index = 31;',
   needs='a SIGNEXTEND byte index of at least 256 whose low byte is below 31', what='huge byte indices are truncated to eight bits',
   demo=ev_demo([('out=' + w(0xff80), '61ff806101000b60005260206000f3 100000 7')])),
'e02-swap-underflow': dict(property='E02', file=IC, old='''struct SwapImpl {
  constexpr static OpInfo kInfo{
      .pops = N + 1,
      .pushes = N + 1,''', new='''struct SwapImpl {
  constexpr static OpInfo kInfo{
      .pops = N,
      .pushes = N,''', needs='SWAPn on a stack of exactly n entries', what='SWAP accepts a stack that is one entry too short',
   demo=ev_demo([('result status=', '600191 100000 7'), ('gas=0', '600191 100000 7'), ('gas=0', '6001600260036004600560066007600860096000600a600b600c600d600e600f9f 100000 7')])),
'e03-london-clear-refund': dict(property='E03', file=IC, old='        case EVMC_STORAGE_MODIFIED_DELETED:\n          ctx.gas_refunds += ctx.revision >= EVMC_LONDON', new='        case EVMC_STORAGE_MODIFIED_DELETED:\n          ctx.gas_refunds += ctx.revision > EVMC_LONDON',
   needs='exactly the London revision and a slot first modified and then cleared in one transaction', what='the refund for clearing a modified slot is the one of the previous revision',
   demo=ev_demo([('refund=4800', '600060005500 100000 9 sstatus=5 warm'), ('refund=4800', '600060005500 100000 10 sstatus=5 warm')])),
'e04-delegatecall-static': dict(property='E04', file=IC, old='        .flags = (Op == op::STATICCALL) ? uint32_t{EVMC_STATIC} : ctx.message->flags,', new='        .flags = (Op == op::STATICCALL) ? uint32_t{EVMC_STATIC} : (Op == op::CALL ? ctx.message->flags : 0u),',
   needs='DELEGATECALL or CALLCODE executed in read-only mode', what='nested delegate calls of a read-only call lose the read-only flag',
   demo=ev_demo([('flags=1', '60006000600060006001620f4240f400 100000 7 static'), ('flags=1', '600060006000600060006001620f4240f200 100000 7 static')])),
'e05-copy-padding': dict(property='E05', file='cpp/vm/evmzero/memory.h', old='    std::fill_n(memory_.data() + memory_offset + bytes_to_copy, memory_write_size - bytes_to_copy, 0);', new='    if (bytes_to_copy == 0) {\n      std::fill_n(memory_.data() + memory_offset, memory_write_size, 0);\n    }',
   needs='a copy instruction whose source ends inside the requested range while the target memory already holds other data', what='the part past the end of the source keeps old memory content',
   demo=ev_demo([('out=aabb' + '00' * 30, '7f' + 'ff' * 32 + '6000526020600060003760206000f3 100000 7 input=aabb')])),
'e06-jump-truncated': dict(property='E06', file=IC, old='  if (index_u256[1] != 0 || index_u256[2] != 0 || index_u256[3] != 0) [[unlikely]] {', new='  if (index_u256[1] != 0 || index_u256[2] != 0) [[unlikely]] {',
   needs='a jump destination of at least 2^192 whose low words are a valid target', what='jump destinations are truncated',
   demo=ev_demo([('gas=0', '78' + '01' + '00' * 23 + '1b' + '565b00 100000 7')])),
'e07-create-returndata': dict(property='E07', file=IC, old='    if (result.status_code == EVMC_REVERT) {\n      ctx.return_data', new='    if (result.status_code != EVMC_FAILURE) {\n      ctx.return_data',
   needs='a successful CREATE whose host result carries the deployed code as output, followed by RETURNDATASIZE', what='return data after a successful contract creation is not empty',
   demo=ev_demo([('out=' + w(0), '600060006000f0503d60005260206000f3 1000000 7 callout=aabbcc'), ('out=' + w(3), '600060006000f0503d60005260206000f3 1000000 7 callout=aabbcc callstatus=2')])),
'e08-sha3-cache-padding': dict(property='E08', file='cpp/vm/evmzero/sha3_cache.h', old='''    if (key_view.size() == 64) {
      Bytes<64> key;
      std::copy_n(key_view.data(), 64, key.begin());''', new='''    if (key_view.size() > 32 && key_view.size() <= 64) {
      Bytes<64> key{};
      std::copy_n(key_view.data(), key_view.size(), key.begin());''', needs='two hashes in one VM of inputs of different length between 33 and 64 bytes that agree after zero padding', what='the hash cache confuses inputs that differ in trailing zeros',
   demo=ev_demo([('out=' + w(1), '602860002060406000201415' + '60005260206000f3 100000 7')])),
}
