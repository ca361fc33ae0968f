// Package params: chain rules of go-ethereum.
package params

import "math/big"

const CallCreateDepth uint64 = 1024

type ChainConfig struct {
	ChainID                                 *big.Int
	IstanbulBlock, BerlinBlock, LondonBlock *big.Int
	ShanghaiTime, CancunTime                *uint64
}

type Rules struct {
	ChainID                                                                     *big.Int
	IsHomestead, IsEIP150, IsEIP155, IsEIP158                                   bool
	IsEIP2929, IsEIP4762                                                        bool
	IsByzantium, IsConstantinople, IsPetersburg, IsIstanbul, IsBerlin, IsLondon bool
	IsMerge, IsShanghai, IsCancun, IsPrague                                     bool
	IsVerkle                                                                    bool
}

func at(b, num *big.Int) bool           { return b != nil && num != nil && b.Cmp(num) <= 0 }
func since(t *uint64, time uint64) bool { return t != nil && *t <= time }

func (c *ChainConfig) IsIstanbul(num *big.Int) bool { return at(c.IstanbulBlock, num) }
func (c *ChainConfig) IsBerlin(num *big.Int) bool   { return at(c.BerlinBlock, num) }
func (c *ChainConfig) IsLondon(num *big.Int) bool   { return at(c.LondonBlock, num) }
func (c *ChainConfig) IsShanghai(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && since(c.ShanghaiTime, time)
}
func (c *ChainConfig) IsCancun(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && since(c.CancunTime, time)
}
func (c *ChainConfig) Rules(num *big.Int, isMerge bool, time uint64) Rules {
	isMerge = isMerge && c.IsLondon(num)
	return Rules{ChainID: c.ChainID, IsIstanbul: c.IsIstanbul(num), IsBerlin: c.IsBerlin(num), IsLondon: c.IsLondon(num), IsMerge: isMerge, IsShanghai: isMerge && c.IsShanghai(num, time), IsCancun: isMerge && c.IsCancun(num, time)}
}
