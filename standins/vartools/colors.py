def hex_to_rgba_float(h, a=1.0):
    return (0.0, 0.0, 0.0, a)
