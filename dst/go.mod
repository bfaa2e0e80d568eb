module dst

go 1.25
