module github.com/wskfjtheqian/hbuf_golang

go 1.21.0

require github.com/shopspring/decimal v1.4.0
