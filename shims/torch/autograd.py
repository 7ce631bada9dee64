def Variable(value):
    return value
