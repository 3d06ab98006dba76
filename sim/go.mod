module rodbsim

go 1.25
