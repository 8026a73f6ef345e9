module verifinstr

go 1.24
