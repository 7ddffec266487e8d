NA += [
]
