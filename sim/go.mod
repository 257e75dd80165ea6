module verifsim

go 1.27

require github.com/moggle-mog/goav v0.0.0

replace github.com/moggle-mog/goav => /repo
