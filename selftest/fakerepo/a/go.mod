module fa

go 1.24
