# Builds demo.go and world.go (beside this file) as part of the Go module in the current directory
# into $tmp/demo; packages missing here are replaced by the stand-ins in mods/.
m() { [ -d "$here/mods/$2" ] && echo "require $1 $3
replace $1 => $here/mods/$2" >> $tmp/go.mod; }
printf 'module github.com/Fantom-foundation/Tosca\n\ngo 1.22.0\n\n' > $tmp/go.mod
m golang.org/x/exp xexp v1.0.0; m github.com/holiman/uint256 uint256 v1.0.0; m go.uber.org/mock gomock v1.0.0; m golang.org/x/crypto xcrypto v1.0.0
m github.com/hashicorp/golang-lru/v2 golang-lru v2.0.0; m github.com/ethereum/go-ethereum geth v1.0.0; m pgregory.net/rand rand v1.0.0
m github.com/ethereum/evmc/v11 evmc v11.0.0
repo=$PWD; extra=
[ -f $here/keccak_standin.go ] && extra=",\"$repo/go/interpreter/lfvm/keccak.go\":\"$here/keccak_standin.go\""
[ -f $here/world.go ] && extra="$extra,\"$repo/go/zzdemo/world.go\":\"$here/world.go\""
[ -f $here/evmc_demo.go ] && grep -v '^import "C"' $repo/go/interpreter/evmc/evmc_interpreter.go > $tmp/evmc_interpreter.go && extra="$extra,\"$repo/go/interpreter/evmc/zzdemo.go\":\"$here/evmc_demo.go\",\"$repo/go/interpreter/evmc/evmc_interpreter.go\":\"$tmp/evmc_interpreter.go\""
[ -f $here/geth_demo.go ] && echo 'package geth_adapter' > $tmp/mocks.go && extra="$extra,\"$repo/go/geth_adapter/zzdemo.go\":\"$here/geth_demo.go\",\"$repo/go/geth_adapter/adapter_test_mocks.go\":\"$tmp/mocks.go\""
[ -f $here/lfvm_demo.go ] && extra="$extra,\"$repo/go/interpreter/lfvm/zzdemo.go\":\"$here/lfvm_demo.go\""
echo "{\"Replace\":{\"$repo/go/zzdemo/main.go\":\"$here/demo.go\"$extra}}" > $tmp/overlay.json
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 go build -modfile=$tmp/go.mod -overlay=$tmp/overlay.json -o $tmp/demo ./go/zzdemo || exit 3
