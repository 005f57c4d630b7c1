module hv

go 1.22

require hbuf v0.0.0

require (
	github.com/shopspring/decimal v1.4.0 // indirect
	github.com/wskfjtheqian/hbuf_golang v1.0.12 // indirect
)

replace hbuf => /repo
