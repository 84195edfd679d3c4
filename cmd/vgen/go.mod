module vgen

go 1.23
