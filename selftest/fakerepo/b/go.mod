module fb

go 1.24
