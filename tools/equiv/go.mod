module equiv

go 1.23
