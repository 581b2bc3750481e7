module mutate

go 1.26
