module h

go 1.24
