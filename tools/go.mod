module verif/tools

go 1.25.0
