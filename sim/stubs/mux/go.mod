module github.com/gorilla/mux

go 1.22.0
