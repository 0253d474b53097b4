module verif/tool

go 1.21
