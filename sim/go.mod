module verifsim

go 1.24

require github.com/zenazn/goji v0.0.0-00010101000000-000000000000

replace github.com/zenazn/goji => /repo
