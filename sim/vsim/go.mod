module vsim

go 1.21
