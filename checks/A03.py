import validator

def run(c):
    validator.run(c, "A03", 60)
