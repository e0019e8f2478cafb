module mcinstr

go 1.21
