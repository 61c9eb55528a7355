package main

type DDL struct{}
type OJSchema struct{}
type StarModel struct{}
