module verifharness

go 1.26
