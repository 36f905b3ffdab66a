module axioms

go 1.21
