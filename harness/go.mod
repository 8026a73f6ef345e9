module verifharness

go 1.24
