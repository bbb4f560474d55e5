"""Static analysis of delayed_image: abstract interpretation of its source."""
