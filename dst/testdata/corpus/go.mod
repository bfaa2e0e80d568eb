module corpus

go 1.21
