import validator

def run(c):
    validator.run(c, "A05", 8)
