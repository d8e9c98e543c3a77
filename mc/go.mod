module vmc

go 1.21
