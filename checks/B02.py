from pool import pool

def run(c):
    pool(c, ("package",))
