module verifsim

go 1.27
