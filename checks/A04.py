import validator

def run(c):
    validator.run(c, "A04", 170)
