module govx

go 1.23
