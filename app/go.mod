module verif.local/app

go 1.22.0
