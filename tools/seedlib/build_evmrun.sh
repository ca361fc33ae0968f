# builds evmrun from the repository in the current directory; sourced by demo.sh with $here and $tmp set
mkdir -p $tmp/gen $tmp/o
{ echo '#pragma once'; echo '#include <string_view>'; echo 'namespace tosca::evmzero::internal {'
  for k in kCompilerId kCompilerVersion kBuildType kCompileDefinitions kCompileOptions kAssertions kAsan kMimalloc kTracy; do echo "inline constexpr std::string_view $k = \"\";"; done; echo '}'; } > $tmp/gen/build_info.h
pids=()
for f in $here/evmrun.cc $(ls cpp/vm/evmzero/*.cc | grep -v -e _test.cc -e _benchmark.cc -e allocator.cc); do
  clang++ -std=c++20 -O1 -w -I$tmp/gen -I$here/stubs -Icpp -Icpp/vm/evmzero -c $f -o $tmp/o/$(basename $f).o & pids+=($!)
done
for p in ${pids[@]}; do wait $p || { echo "demo build failed"; exit 3; }; done
clang++ -o $tmp/evmrun $tmp/o/*.o -lpthread || exit 3
