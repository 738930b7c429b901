module simbuild

go 1.21
