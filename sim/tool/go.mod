module zztool
go 1.25.0
