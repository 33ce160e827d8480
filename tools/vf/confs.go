package main

var confs = map[string]conf{
	"C01": {quick: 60, thorough: 600},
	"C02": {quick: 60, thorough: 600},
	"C04": {quick: 60, thorough: 600},
	"C06": {quick: 60, thorough: 600},
	"C07": {quick: 60, thorough: 600},
	"C08": {quick: 60, thorough: 600},
	"C09": {quick: 60, thorough: 600},
	"C12": {quick: 60, thorough: 600},
	"C03": {quick: 50, thorough: 600},
	"C10": {quick: 120, thorough: 600},
	"C11": {quick: 120, thorough: 600},
	"C13": {quick: 120, thorough: 600},
	"C15": {quick: 150, thorough: 600},
	"C17": {quick: 100, thorough: 600, race: true},
	"C18": {quick: 80, thorough: 600},
	"C19": {quick: 100, thorough: 600},
	"C20": {quick: 90, thorough: 900, race: true},
	"C21": {quick: 70, thorough: 900, race: true},
	"C22": {quick: 60, thorough: 600},
	"C23": {quick: 60, thorough: 600, race: true},
	"C25": {quick: 100, thorough: 600},
	"C26": {quick: 90, thorough: 600, race: true},
	"C27": {quick: 100, thorough: 600},
	"C28": {quick: 100, thorough: 600},
	"C29": {quick: 100, thorough: 600, race: true},
	"C30": {quick: 60, thorough: 300},
	"C24": {quick: 100, thorough: 600},
	"C16": {quick: 40, thorough: 600},
	"C14": {quick: 150, thorough: 600},
	"C05": {quick: 40, thorough: 600, race: true},
}
