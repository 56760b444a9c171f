module mkcorpus

go 1.21.1
