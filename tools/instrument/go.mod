module rodbinstr

go 1.25
