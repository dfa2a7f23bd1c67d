import validator

def run(c):
    validator.run(c, "A02", 150)
