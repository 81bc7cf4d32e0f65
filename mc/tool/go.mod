module mctool

go 1.21
