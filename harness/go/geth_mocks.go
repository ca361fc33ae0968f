package geth_adapter
