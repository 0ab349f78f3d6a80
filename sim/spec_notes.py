NOTE.update({})
