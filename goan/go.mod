module goan

go 1.23
