module verifspec

go 1.21
