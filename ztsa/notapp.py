"""properties not claimed: id -> reason"""
NA = {
}
