module crlitesim

go 1.24
