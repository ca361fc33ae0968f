package tracing

type BalanceChangeReason byte

const (
	BalanceChangeUnspecified    BalanceChangeReason = 0
	BalanceIncreaseSelfdestruct BalanceChangeReason = 12
	BalanceDecreaseSelfdestruct BalanceChangeReason = 13
)
