module genrt

go 1.24
