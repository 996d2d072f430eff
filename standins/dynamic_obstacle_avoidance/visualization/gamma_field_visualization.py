def gamma_field_multihull(*args, **kwargs):
    return None


def gamma_field(*args, **kwargs):
    return None


def gamma_field_room_with_door(*args, **kwargs):
    return None


def gamma_field_visualization(*args, **kwargs):
    return None
